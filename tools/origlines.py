"""which lines of each seeded patch are lines of the original repository, and which ones our own commits added"""
import glob, os, re, subprocess
BASE = "671954c"
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    own = orig = 0
    f, n, add = None, 0, 0
    cache = {}
    for l in open(d):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            f = l[6:]
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", BASE + "..HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout.split("\n")
            cache = {i + 1: not x.startswith("^") for i, x in enumerate(b)}
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip():
                own, orig = own + cache.get(n, False), orig + (not cache.get(n, False))
            n += 1
        elif l.startswith("+") and not l.startswith("+++"):
            add += 1
        elif l.startswith(" "):
            n += 1
    print("%-45s original %d own %d added %d%s" % (d.split("/")[3], orig, own, add, "  <-- CHECK" if own else ""))
