"""Development helper: make /verif/seeded/<id> from a python file that defines BUG (see below), and try it out.

BUG = dict(id, property, needs, what, edits=[(file, old, new), ...], demo="python source")
usage: mkbug.py FILE.py [--no-suite] [--checks C01,C02]
"""
import json, os, pathlib, shutil, subprocess, sys, textwrap

HOME = pathlib.Path(__file__).resolve().parents[1]
DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/demo-XXXXXX)" || exit 3
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg HOME="$scratch" TMPDIR="$scratch"
cd "$scratch" && /opt/venv/bin/python "$here/demo.py" "$scratch"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    args = sys.argv[1:]
    ns = {}
    exec(compile(pathlib.Path(args[0]).read_text(), args[0], "exec"), ns)
    bugs = ns.get("BUGS") or [ns["BUG"]]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        for line in ex.map(lambda b: one(b, args), bugs):
            print(line, flush=True)


def one(b, args):
    out = []
    try:
        go(b, args, out)
    except Exception as e:
        out.append(f"  !! {type(e).__name__}: {e}")
    finally:
        shutil.rmtree(f"/tmp/bug-{b['id']}", ignore_errors=True)
    return "\n".join([f"== {b['id']} ({b['property']})", *out])


def go(b, args, out):
    copy = pathlib.Path(f"/tmp/bug-{b['id']}")
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", str(copy)])
    for f, old, new in b["edits"]:
        p = copy / f
        s = p.read_text()
        assert s.count(old) == 1, f"{f}: {s.count(old)} times: {old[:80]!r}"
        p.write_text(s.replace(old, new))
    dst = HOME / "seeded" / b["id"]
    dst.mkdir(parents=True, exist_ok=True)
    (dst / "patch.diff").write_text(sh("git diff", cwd=copy).stdout)
    # removed lines must be from the base commit
    base = sh("git rev-list --max-parents=0 HEAD", cwd=copy).stdout.split()[0]
    orig = False
    for f, *_ in b["edits"]:
        was = sh(f"git show {base}:{f}", cwd=copy).stdout.splitlines()
        gone = [l[1:] for l in sh(f"git diff -U0 -- {f}", cwd=copy).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
        if any(l in was and l.strip() for l in gone):
            orig = True
    out.append(f"  original lines changed: {orig}")
    (dst / "demo.sh").write_text(DEMO)
    os.chmod(dst / "demo.sh", 0o755)
    (dst / "demo.py").write_text(textwrap.dedent(b["demo"]).lstrip())
    (dst / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, indent=1) + "\n")
    r0 = sh(f"timeout 300 bash {dst}/demo.sh", cwd="/repo")
    r1 = sh(f"timeout 300 bash {dst}/demo.sh", cwd=copy)
    out.append(f"  demo clean rc={r0.returncode} {r0.stderr[-600:] if r0.returncode else ''} patched rc={r1.returncode} {(r1.stdout + r1.stderr).strip()[-200:]!r}")
    env = {**os.environ, "PYTHONPATH": str(copy), "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/opt/vp/mpl", "OMP_NUM_THREADS": "1"}
    if "--no-suite" not in args:
        sh(f'/opt/venv/bin/python -m pytest -q -m "" -p no:cacheprovider --timeout=300 -n 4 --dist loadscope --continue-on-collection-errors '
           f'--deselect "tests/test_examples.py::test_ci_examples[convenience/neps_tblogger_tutorial]" -o junit_family=xunit2 --junitxml={copy}/j.xml', cwd=copy, env=env)
        sh(f"python3 /opt/vp/results.py {copy}/j.json junit:{copy}/j.xml")
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(copy / "j.json"))
        names = lambda x: set(next((x[k] for k in ("passed", "stable", "tests") if k in x), x))
        out.append(f"  suite missing: {sorted(names(base) - names(got))[:5]}")
    checks = args[args.index("--checks") + 1].split(",") if "--checks" in args else [b["property"]]
    for c in checks:
        r = sh(f"{HOME}/check {c}", env={**os.environ, "VERIF_REPO": str(copy)})
        first = [l for l in r.stdout.splitlines() + r.stderr.splitlines() if l.startswith("---") or l.startswith("VIOLATION") or "rc=" in l]
        out.append(f"  {c} rc={r.returncode} {' | '.join(x[:230] for x in first[:3])}")


main()
