"""Writes /verif/MANIFEST.json from the check modules present."""
import ast, json, pathlib
H = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (H / "properties.jsonl").read_text().splitlines()]
TECH = {
    "C01": "runtime monitoring: real worker processes under a scheduling LD_PRELOAD shim, exactly-once checker over the event log",
    "C02": "runtime monitoring: concurrent samplers under the scheduling shim, id/conservation checker over proposals and disk",
    "C03": "runtime monitoring: count-limit trace checker over scheduled multi-worker runs",
    "C04": "runtime monitoring: budget trace checker and ledger conservation over scheduled runs with generated costs",
    "C05": "runtime monitoring: value-conservation monitor over generated return values and configurations",
    "C06": "runtime monitoring: error-policy trace checker and error-log conservation under scheduled failures",
    "C07": "runtime monitoring: directory-snapshot and evaluation-log checker over generated sequences of run calls",
    "C08": "runtime monitoring: sampled-sequence comparison between one process and split/interleaved executions",
    "C09": "runtime monitoring: offline linearizability checker over recorded histories of scheduled reads and writes",
    "C10": "runtime monitoring with fault injection: SIGKILL / torn write at enumerated system calls, state and restart checker",
    "C11": "runtime monitoring: simultaneous starts under the scheduling shim and crash injection, snapshot checker",
    "C12": "runtime monitoring: observer process polling the state between scheduled steps, state-machine checker",
    "C13": "runtime monitoring: in-pipeline monitors of the global trial, directories and checkpoints over generated histories",
    "C14": "runtime monitoring: independent recount of generated histories against status, summary and CSV output",
    "C15": "runtime monitoring: domain/type/immutability monitors on sampling operators over generated spaces",
    "C16": "runtime monitoring: round-trip and domain monitors on encoders over generated spaces and corner points",
    "C17": "runtime monitoring: differential monitor between routes of writing a space, rejection monitor",
    "C18": "runtime monitoring: shape/domain/density monitors on samplers and priors over generated domains",
    "C19": "runtime monitoring: exactly-once checker over grid-search proposals across processes",
    "C20": "runtime monitoring: legality monitor on every proposal over generated histories and completion orders",
    "C21": "runtime monitoring: fidelity/id/bracket monitor against an independent schedule computation",
    "C22": "runtime monitoring: promotion monitor against an independent replay of the history",
    "C23": "runtime monitoring: differential monitor between argument sources on recorded settings",
    "C24": "runtime monitoring: hooked surrogate inputs compared row by row with the history",
    "C26": "runtime monitoring: recount of generated histories against the command-line reports",
    "C27": "runtime monitoring: step/continuation monitor on proposals and recorded network inputs, stand-in network",
    "C28": "runtime monitoring: recording searcher, reference record of all operations compared at every ask and answer",
    "C29": "runtime monitoring: recording sampling policy against an independent computation of shares and incumbent, distribution monitors",
    "C30": "runtime monitoring: event files read back and compared as a multiset with the calls recorded inside the pipelines",
    "C31": "runtime monitoring: hooked savefig, drawn points compared with step functions of the generated history",
    "C32": "runtime monitoring: distribution monitors on proposals against independent samplers of the declared priors",
    "C25": "runtime monitoring: derivability and immutability monitors on grammar operators",
}
NOTES = {
    "exploration": "Every execution explored satisfied the property; nothing is proved about executions not explored. Trusts the oracle in the check, the scheduling shim and the Python/OS below.",
    "fault_enumeration": "Every enumerated or sampled kill point was survived; trusts the shim to stop the process exactly there; process kills only, no power loss.",
}
checks, na = [], []
for p in props:
    f = H / "vlib" / "checks" / f"{p['id'].lower()}.py"
    if not f.exists():
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    tree = ast.parse(f.read_text())
    level = next(ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "LEVEL")
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                   "technique": TECH[p["id"]], "level": level, "level_note": NOTES[level]})
m = {"version": 1, "setup_cmd": "mkdir -p build && gcc -O2 -w -shared -fPIC -o build/vshim.so shim/vshim.c -ldl",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the instrumentation is an LD_PRELOAD shim and monitors installed by the harness in its own processes. Known and fixed findings: KNOWN_FINDINGS.txt."}
(H / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
