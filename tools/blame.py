"""blame.py [ID...]: lists lines removed by planted bugs that are not of the original repository."""
import os, re, subprocess, sys
S = "/verif/seeded"
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
for i in sys.argv[1:] or sorted(os.listdir(S)):
    f = n = None; orig = other = 0
    for l in open(f"{S}/{i}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "-L", f"{n},{n}", "HEAD", "--", f], capture_output=True, text=True).stdout
            h = b.split()[0].lstrip("^")
            if base.startswith(h) or h.startswith(base[:30]): orig += 1
            else: other += 1; print(i, "own line", f, n, l.rstrip()[:100])
            n += 1
        elif l.startswith(" "): n += 1
    if not orig or other: print(i, "original lines:", orig, "own:", other)
