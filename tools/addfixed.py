"""Development helper: list fix commits of /repo missing in KNOWN_FINDINGS.txt; with 'HASH=Cxx' arguments add them."""
import subprocess, sys, pathlib
f = pathlib.Path(__file__).resolve().parents[1] / "KNOWN_FINDINGS.txt"
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()]
want = dict(a.split("=") for a in sys.argv[1:])
text = f.read_text()
new = ""
for h, s in log:
    if s.startswith("fix: ") and h not in text:
        if h in want:
            new += f"fixed: property={want[h]} {h} {s[5:]}\n"
        else:
            print("missing", h, s)
lines = text.splitlines(True)
i = max(k for k, l in enumerate(lines) if l.startswith("fixed:")) + 1
f.write_text("".join(lines[:i]) + new + "".join(lines[i:]))
