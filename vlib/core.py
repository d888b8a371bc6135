"""Shared infrastructure: case pool, verdicts, evidence, replay."""
from __future__ import annotations

import hashlib
import json
import logging
import os
import pickle
import re
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(os.environ.get("VERIF_HOME", "/verif"))
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SCRATCH = Path(os.environ.get("VERIF_SCRATCH_DIR") or tempfile.mkdtemp(prefix="verif-"))


class Res:
    """What one case observed."""

    def __init__(self):
        self.violations: list[dict] = []
        self.counts: dict[str, int] = {}
        self.sigs: list[str] = []
        self.sample = None
        self.evals = 1
        self.inconclusive: str | None = None

    def viol(self, mechanism: str, msg: str, **detail):
        if len(self.violations) < 20:
            self.violations.append({"mechanism": mechanism, "msg": str(msg)[:1500], **{k: _short(v) for k, v in detail.items()}})

    def count(self, name: str, n: int = 1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sig(self, *parts):
        self.sigs.append(hashlib.sha256(repr(parts).encode()).hexdigest()[:16])

    def require(self, cond, mechanism, msg, **detail):
        if not cond:
            self.viol(mechanism, msg, **detail)
        return bool(cond)


def _short(v):
    s = v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)
    return s if not isinstance(s, str) else s[:1500]


def neps_frame(e: BaseException) -> str | None:
    """Innermost neps frame of an exception chain, or None if neps is not involved."""
    x, seen = e, set()
    while x is not None and id(x) not in seen:
        seen.add(id(x))
        fr = [f for f in traceback.extract_tb(x.__traceback__) if f.filename.startswith(str(REPO) + "/neps")]
        if fr:
            return f"{os.path.basename(fr[-1].filename)}:{fr[-1].name}"
        x = x.__cause__ or x.__context__
    return None


class Scratch:
    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = Path(tempfile.mkdtemp(prefix="verif-case-", dir=base))
        self.dir = Path(os.path.realpath(self.dir))

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def run_one(mod, case) -> Res:
    res = Res()
    try:
        with Scratch() as d:
            old = os.getcwd()
            os.chdir(d)
            try:
                mod.run_case(case, d, res)
            finally:
                os.chdir(old)
    except Exception as e:  # noqa: BLE001
        where = neps_frame(e)
        tb = "".join(traceback.format_exception(e))[-3500:]
        # Raised inside neps on a legal use => behaviour of the code under test;
        # otherwise the harness itself failed.
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if where and not last.startswith(str(VERIF)):
            res.viol(f"unexpected-exception:{type(e).__name__}@{where}", f"{type(e).__name__}: {e}", tb=tb)
        elif malformed(e):
            # What the code under test returned or left on disk lacks something every user of it
            # may rely on (a missing key, file or element, None, an unreadable file).
            fr = traceback.extract_tb(e.__traceback__)[-1]
            res.viol(f"malformed-result:{type(e).__name__}", f"the result lacks what was asked of it: {type(e).__name__}: {e} at {Path(fr.filename).name}: {fr.line}", tb=tb)
        else:
            res.inconclusive = tb
    return res


def malformed(e) -> bool:
    """Exceptions of the oracles that mean a malformed result, not an unsuitable harness."""
    import yaml

    if isinstance(e, (KeyError, IndexError, StopIteration, FileNotFoundError, ValueError, ArithmeticError, yaml.YAMLError)):
        return True
    return isinstance(e, (TypeError, AttributeError)) and "NoneType" in str(e)


def load_known(prop: str) -> dict[str, str]:
    known = {}
    f = VERIF / "KNOWN_FINDINGS.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"known: property=(\S+) mechanism=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def rd(n):
        b = b""
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                raise EOFError
            b += x
        return b
    (n,) = struct.unpack("<Q", rd(8))
    return pickle.loads(rd(n))


class Pool:
    def __init__(self, mod, nproc):
        self.mod, self.n = mod, nproc
        self.workers = []

    def spawn(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.setsid()
            os.close(w1)
            os.close(r2)
            for w in self.workers:
                os.close(w["out"])
                os.close(w["inp"])
            try:
                while True:
                    case = _recv(r1)
                    if case is None:
                        break
                    _send(w2, run_one(self.mod, case))
            except EOFError:
                pass
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        w = {"pid": pid, "out": w1, "inp": r2, "case": None, "t": 0.0}
        self.workers.append(w)
        return w

    def drop(self, w):
        try:
            os.killpg(w["pid"], signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            os.kill(w["pid"], signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.close(w["out"])
        os.close(w["inp"])
        os.waitpid(w["pid"], 0)
        self.workers.remove(w)

    def run(self, cases, *, case_timeout, deadline, stop):
        """Yields (case, Res | None)."""
        it = iter(cases)
        exhausted = False
        again: list = []  # cases to repeat, as they timed out or their process died
        tried: dict[int, int] = {}
        for _ in range(self.n):
            self.spawn()
        try:
            while True:
                for w in self.workers:
                    if w["case"] is None and again:
                        c = again.pop()
                        w["case"], w["t"] = c, time.monotonic()
                        _send(w["out"], c)
                    elif w["case"] is None and not exhausted and not stop() and time.monotonic() < deadline:
                        try:
                            c = next(it)
                        except StopIteration:
                            exhausted = True
                            continue
                        w["case"], w["t"] = c, time.monotonic()
                        _send(w["out"], c)
                busy = [w for w in self.workers if w["case"] is not None]
                if not busy:
                    break
                r, _, _ = select.select([w["inp"] for w in busy], [], [], 5.0)
                for w in busy:
                    if w["inp"] in r:
                        case = w["case"]
                        try:
                            res = _recv(w["inp"])
                        except (EOFError, pickle.UnpicklingError):
                            self.drop(w)
                            self.spawn()
                            tried[id(case)] = tried.get(id(case), 0) + 1
                            if tried[id(case)] < 2:
                                again.append(case)
                                continue
                            res = Res()
                            res.inconclusive = "case process died"
                        w["case"] = None
                        yield case, res
                    elif time.monotonic() - w["t"] > case_timeout:
                        case = w["case"]
                        self.drop(w)
                        self.spawn()
                        tried[id(case)] = tried.get(id(case), 0) + 1
                        if tried[id(case)] < 2:
                            again.append(case)
                            continue
                        # cases take seconds: twice beyond the limit means that something never returns
                        res = Res()
                        res.viol("no-termination", f"the case did not end within {case_timeout} s, twice: {str(case)[:800]}")
                        yield case, res
        finally:
            for w in list(self.workers):
                self.drop(w)


def main(prop: str, replay: str | None = None) -> int:
    import importlib

    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(f"vlib.checks.{prop.lower()}")
    import neps

    assert str(Path(neps.__file__).resolve()).startswith(str(REPO)), neps.__file__
    import torch

    torch.set_num_threads(1)

    if replay:
        case = json.loads(Path(replay).read_text())["case"]
        res = run_one(mod, case)
        print(json.dumps({"violations": res.violations, "counts": res.counts, "inconclusive": res.inconclusive, "sample": res.sample}, indent=1, default=repr))
        return 1 if res.violations else (2 if res.inconclusive else 0)

    known = load_known(prop)
    nproc = int(os.environ.get("VERIF_JOBS", str(getattr(mod, "JOBS", min(8, os.cpu_count() or 1)))))
    deadline = t0 + (getattr(mod, "QUICK_DEADLINE", 420) if tier == "quick" else getattr(mod, "THOROUGH_DEADLINE", 1800))
    agg: dict[str, int] = {}
    sigs: set[str] = set()
    evaluations = 0
    samples: list = []
    violations: list[tuple[dict, dict]] = []
    known_hit: dict[str, int] = {}
    inconcl: list[str] = []
    pool = Pool(mod, nproc)
    for case, res in pool.run(mod.cases(tier, seed), case_timeout=getattr(mod, "CASE_TIMEOUT", 150), deadline=deadline, stop=lambda: len(violations) >= int(os.environ.get("VERIF_MAXV", "3")) or len(inconcl) >= 5):
        evaluations += res.evals
        for k, v in res.counts.items():
            agg[k] = agg.get(k, 0) + v
        sigs.update(res.sigs)
        if res.sample is not None and len(samples) < 5:
            samples.append(res.sample)
        if res.inconclusive:
            inconcl.append(res.inconclusive)
        for v in res.violations:
            if v["mechanism"] in known:
                known_hit[v["mechanism"]] = known_hit.get(v["mechanism"], 0) + 1
            else:
                violations.append((case, v))
    wall = time.monotonic() - t0

    rc = 0
    for m, n in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop} {m}: {known[m]} (seen {n}x)")
    if violations:
        rc = 1
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        seen = set()
        for case, v in violations:
            if v["mechanism"] in seen:
                continue
            seen.add(v["mechanism"])
            h = hashlib.sha256(json.dumps([case, v["mechanism"]], sort_keys=True, default=repr).encode()).hexdigest()[:10]
            path = rdir / f"{prop}-{h}.json"
            path.write_text(json.dumps({"property": prop, "case": case, "violation": v}, indent=1, default=repr))
            print(f"--- {v['mechanism']}: {v['msg']}")
            if "tb" in v:
                print(v["tb"])
            print(f"VIOLATION property={prop} replay={path}")
    short = [f"{k}={agg.get(k, 0)}<{n}" for k, n in getattr(mod, "MIN", {}).get(tier, getattr(mod, "MIN", {}).get("quick", {})).items() if agg.get(k, 0) < n] if getattr(mod, "MIN", None) else []
    for x in inconcl[:3]:
        print("INCONCLUSIVE:", x)
    if rc == 0 and (inconcl or short):
        rc = 2
        if short:
            print("INCONCLUSIVE: too little observed:", ", ".join(short))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples or ["(no sample recorded)"],
            "observed": dict(sorted(agg.items())),
            "inconclusive_cases": len(inconcl),
            "known_findings_seen": known_hit,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    tmp = VERIF / "evidence" / f".{prop}.{os.getpid()}"
    tmp.write_text(json.dumps(ev, indent=1, default=repr))
    tmp.replace(VERIF / "evidence" / f"{prop}.json")
    print(f"{prop} {tier} seed={seed}: evaluations={evaluations} distinct={len(sigs)} observed={json.dumps(dict(sorted(agg.items())))} wall={wall:.1f}s rc={rc}")
    return rc
