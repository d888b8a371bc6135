"""C26: the command-line reports against an independent recount of the recorded trials."""
from __future__ import annotations

import contextlib
import io
import math
import os
import random
import sys
from datetime import datetime
from pathlib import Path

from vlib import mw
from vlib.checks import c14
from vlib.checks.c07 import snap

LEVEL = "exploration"
RULE = ("a case builds a run directory with a generated history (any mix of pending, in-progress, successful and crashed trials, identifiers of all forms, ties, infinite and NaN losses), "
        "runs the real command line (status with each filter, results, info-config of every trial, errors) on it and compares what is printed with a recount made while the history was written; "
        "distinct_nontrivial counts distinct (numbers per category, loss pattern, form of the identifiers) with at least one trial")
ASSUMPTIONS = ["the incumbents are the successful trials, in the order they were sampled, with a smaller loss than all before", "commands are run from a directory that may be written to (the command line writes its documentation there)"]
MIN = {"quick": {"histories": 150, "info": 450, "info_unfinished": 80, "listed": 1000, "incumbents": 80, "errors": 120, "no_trials": 3, "best_shown": 60, "mf_ids": 20, "missing": 20}}
CASE_TIMEOUT = 150


def cases(tier, seed):
    rng = random.Random(f"c26-{seed}")
    for i in range(300 if tier == "quick" else 2500):
        yield {"n": rng.choice([0, 1, 1, 2, 3, 5, 8, 12, 14]), "mix": rng.choice(["mixed", "mixed", "mixed", "success", "failed", "pendingonly", "weird"]), "fid": rng.random() < 0.4, "ids": rng.choice(["num", "num", "mf", "pad"]),
               "cost": rng.random() < 0.5, "extra": rng.choice(["none", "flat", "info"]), "losses": rng.choice(["rand", "ties", "inf", "nan", "neg", "int", "allinf"]),
               "plot": rng.random() < 0.08, "where": rng.choice(["arg", "arg", "file"]), "seed": rng.randrange(1 << 30)}


def cli(cwd, *argv):
    from neps.utils import cli as C

    out = io.StringIO()
    old, oldcwd = sys.argv, os.getcwd()
    sys.argv = ["neps", *argv]
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out):
            C.main()
    finally:
        sys.argv = old
        os.chdir(oldcwd)
    return out.getvalue()


def field(txt, name):
    for line in txt.splitlines():
        if line.strip().startswith(name + ":"):
            return line.split(":", 1)[1].strip()
    return None


def hms(s):
    return f"{int(s) // 3600}:{int(s) // 60 % 60:02d}:{int(s) % 60:02d}"


def run_case(case, d, res):
    import matplotlib

    matplotlib.use("Agg")
    rng = random.Random(case["seed"])
    mw.seed_all(case["seed"])
    root, cwd = d / "root", d / "cwd"
    cwd.mkdir()
    for cmd in (["status"], ["results"], ["errors"], ["info-config", "1"]):  # nothing there yet
        out = cli(cwd, *cmd, "--root-directory", str(root))
        if "does not exist" not in out or root.exists():
            res.viol("missing-directory", f"{cmd} for a missing directory printed {out!r}, exists now: {root.exists()}")
        res.count("missing")
    _, exp = c14.build_history(case, root, rng)
    want = c14.recount(exp)
    _, trials = mw.load_trials(root)
    order = sorted(trials, key=lambda i: trials[i].metadata.time_sampled)
    if len({t.metadata.time_sampled for t in trials.values()}) != len(trials):
        res.inconclusive = "two trials sampled at the same time"
        return
    if case["where"] == "file":
        (cwd / "run_config.yaml").write_text(f"root_directory: {root}\n")
        where = []
    else:
        where = ["--root-directory", str(root)]
    before = snap(root)

    def bad(what, msg):
        res.viol(what, f"{msg} for {({i: (e['state'], e.get('loss')) for i, e in exp.items()})}")

    # ---- status
    name = {"pending": "PENDING", "evaluating": "EVALUATING", "success": "SUCCESS", "crashed": "CRASHED"}
    for flag in ("", "pending", "evaluating", "succeeded"):
        out = cli(cwd, "status", *where, *([f"--{flag}"] if flag else []))
        for head, v in (("Succeeded Trials", want["eval"] - want["err"]), ("Failed Trials (Errors)", want["err"]), ("Active Trials", want["prog"]), ("Pending Trials", want["pend"] + want["prog"]), ("Pending Trials with Worker", want["prog"])):
            if field(out, head) != str(v):
                bad("status-count", f"status {flag} says '{head}: {field(out, head)}' instead of {v}")
        b = field(out, "Best Loss Achieved")
        if want["best"] is not None and b != str(want["best"]):
            bad("status-best", f"best loss {b} instead of {want['best']}")
        rows = out.split("Latest Trials:")[1].split("Best Trial:")[0].strip().splitlines()[2:]
        states = {"": None, "pending": "pending", "evaluating": "evaluating", "succeeded": "success"}[flag]
        ids = [i for i in reversed(order) if states is None or exp[i]["state"] == states]
        if not flag:
            ids = ids[:7]
        got = []
        for r in rows:
            if not r.strip():
                continue
            p = [r[:20].strip(), r[21:31].strip(), r[32:42].strip(), r[83:95].strip(), r[96:].strip()]
            got.append(p[2])
            res.count("listed")
            if p[2] not in exp:
                continue
            e, t = exp[p[2]], trials[p[2]]
            if p[3] != name[e["state"]]:
                bad("status-row-state", f"{p[2]} is listed as {p[3]} instead of {e['state']}")
            if p[0] != datetime.fromtimestamp(t.metadata.time_sampled).strftime("%Y-%m-%d %H:%M:%S"):
                bad("status-row-time", f"{p[2]} is listed as sampled at {p[0]}")
            if e["state"] in ("success", "crashed") and p[1] != hms(t.metadata.evaluation_duration):
                bad("status-row-duration", f"{p[2]} took {t.metadata.evaluation_duration} s and is listed with {p[1]}")
            loss = t.report.loss if t.report is not None else None
            if p[4] != (f"{loss:.6f}" if loss is not None else "N/A"):
                bad("status-row-loss", f"{p[2]} is listed with loss {p[4]} instead of {loss}")
        if got != ids:
            bad("status-rows", f"status {flag} lists {got} instead of {ids}")
        if not flag:
            tail = out.split("Best Trial:")[1]
            if want["best"] is None:
                if "No successful trial found." not in tail:
                    bad("status-best", f"a best trial is shown: {tail[:200]!r}")
            else:
                res.count("best_shown")
                i = field(tail, "ID")
                if i not in want["best_ids"] or field(tail, "Loss") != str(want["best"]):
                    bad("status-best", f"best trial {i} with {field(tail, 'Loss')} instead of {want['best_ids']} with {want['best']}")
                else:
                    for k, v in exp[i]["config"].items():
                        if f"  {k}: {v}\n" not in tail:
                            bad("status-best-config", f"'{k}: {v}' of the best trial {i} is missing")
    # ---- results
    inc, best = [], math.inf
    for i in order:
        if exp[i]["state"] == "success" and exp[i]["loss"] < best:
            best = exp[i]["loss"]
            inc.append(i)
    out = cli(cwd, "results", *where)
    for e in exp.values():  # values with line breaks
        for v in e["config"].values():
            if isinstance(v, str) and len(v.splitlines()) > 1:
                out = out.replace(v, repr(v))
    lines = [x for x in out.splitlines() if x.strip()]
    rows = lines[lines.index(next(x for x in lines if x.startswith("ID "))) + 2:]
    if not inc:
        if rows != ["No Incumbent Trials found."]:
            bad("results-none", f"results lists {rows}")
    else:
        got = [r.split()[0] for r in rows]
        res.count("incumbents", len(inc))
        if got != inc[::-1]:
            bad("results-incumbents", f"incumbents {got} instead of {inc[::-1]}")
        else:
            for r, i in zip(rows, inc[::-1]):
                if r.split()[1] != f"{exp[i]['loss']:.6f}":
                    bad("results-loss", f"{r!r}, loss is {exp[i]['loss']}")
                for k, v in exp[i]["config"].items():
                    if f"{k}: {v}" not in r and f"{k}: {v!r}" not in r:
                        bad("results-config", f"'{k}: {v}' of {i} is missing in {r!r}")
    # ---- every trial
    for i in order:
        out = cli(cwd, "info-config", i, *where)
        e, t = exp[i], trials[i]
        res.count("info")
        if e["state"] in ("pending", "evaluating"):
            res.count("info_unfinished")
        if field(out, "Trial ID") != i or e["state"] not in (field(out, "State") or "").lower():
            bad("info-state", f"info-config {i} says {field(out, 'Trial ID')} in state {field(out, 'State')}, is {e['state']}")
        for k, v in e["config"].items():
            if f"    {k}: {v}\n" not in out:
                bad("info-config", f"'{k}: {v}' of {i} is missing in {out!r}")
        m = t.metadata
        for h, v in (("Location", m.location), ("Previous Trial ID", e["prev"]), ("Sampling Worker ID", m.sampling_worker_id), ("Evaluating Worker ID", m.evaluating_worker_id)):
            if field(out, h) != str(v):
                bad("info-metadata", f"{h} of {i} is {field(out, h)} instead of {v}")
        for h, v in (("Time Sampled", m.time_sampled), ("Time Started", m.time_started), ("Time End", m.time_end)):
            if v is not None and field(out, h) != datetime.fromtimestamp(v).strftime("%Y-%m-%d %H:%M:%S"):
                bad("info-time", f"{h} of {i} is {field(out, h)} instead of {v}")
        if e["state"] in ("success", "crashed"):
            if field(out, "Evaluation Duration") != hms(m.evaluation_duration):
                bad("info-duration", f"{i} took {m.evaluation_duration} s, shown is {field(out, 'Evaluation Duration')}")
            for h, v in (("Loss", t.report.loss), ("Cost", t.report.cost), ("Reported As", e["state"])):
                if field(out, h) != str(v):
                    bad("info-report", f"{h} of {i} is {field(out, h)} instead of {v}")
        elif "No report available." not in out:
            bad("info-report", f"a report of {i} is shown: {out!r}")
    out = cli(cwd, "info-config", "no-such-trial", *where)
    if "No trial found" not in out:
        bad("info-unknown", f"{out!r}")
    # ---- errors
    out = cli(cwd, "errors", *where)
    failed = sorted(i for i in exp if exp[i]["state"] == "crashed")
    got = sorted(x.split(":", 1)[1].strip() for x in out.splitlines() if x.startswith("Error in Trial ID:"))
    res.count("errors", len(failed))
    if got != failed or (not failed and "No errors found." not in out):
        bad("errors", f"errors lists {got} instead of {failed}")
    if out.count("Error Type: ValueError") != len(failed) or out.count("Error Message: no\n") != len(failed):
        bad("errors-content", f"{out[:400]!r}")
    after = snap(root)
    if after != before:
        bad("reports-changed-run", f"files changed: {[k for k in set(after) | set(before) if after.get(k) != before.get(k)]}")
    if case["plot"]:
        out = cli(cwd, "results", "--plot", *where)
        p = Path(out.split("Plot saved to ")[1].strip())
        if not p.exists() or p.parent != root:
            bad("plot", f"{out!r}")
        after = {k: v for k, v in snap(root).items() if k != p.name}
        if after != before:
            bad("reports-changed-run", "results --plot changed the run")
        res.count("plots")
    res.count("histories")
    if not exp:
        res.count("no_trials")
    else:
        res.sig(want["eval"], want["err"], want["pend"], want["prog"], case["losses"], case["ids"], len(inc))
    if case["ids"] == "mf" and exp:
        res.count("mf_ids")
    res.sample = {"case": case, "incumbents": inc, "recount": {k: (sorted(v) if isinstance(v, set) else v) for k, v in want.items()}}
