"""origlines.py ID: do the lines a seed removes or that its insertions follow come from the original commit?"""
import re, subprocess, sys
first = subprocess.run("git -C /repo log --format=%H --reverse --grep=^fix:", shell=True, capture_output=True, text=True).stdout.split()
for sid in sys.argv[1:]:
    n = {"orig": 0, "mine": 0}
    f = None
    for l in open(f"/verif/seeded/{sid}/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m:
            ln = int(m.group(1)); continue
        if f and l[:1] in " -" and not l.startswith("---"):
            if l[0] == "-":
                b = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "-L", f"{ln},{ln}", "HEAD", "--", f], capture_output=True, text=True).stdout
                n["mine" if b.lstrip("^")[:38] in {h[:38] for h in first} else "orig"] += 1
            ln += 1
    print(sid, n)
