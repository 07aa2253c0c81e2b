"""Planted bugs must change lines of the original repository: list those that do not."""
import glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = "edf6aa8"
for p in sorted(glob.glob(V + "/seeded/*/patch.diff")):
    f, own, orig, n = None, 0, 0, 0
    for l in open(p):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            mine = {int(re.search(r"(\d+)\) ", x).group(1)) for x in subprocess.run(["git", "-C", "/repo", "blame", "-s", base + "..HEAD", "--", f], capture_output=True, text=True).stdout.splitlines() if not x.startswith("^")}
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l.startswith("-") and not l.startswith("---"):
            own += n in mine
            orig += n not in mine
            n += 1
        elif f and l.startswith(" "):
            n += 1
    print("ok " if orig and not own else ("mix" if orig else "OWN"), os.path.basename(os.path.dirname(p)), "original", orig, "own", own)
