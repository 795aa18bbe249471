"""covreport.py FOLDER: executable lines of rsciio executed by fewer than MIN cases of all checks (development only)."""
import ast, dis, os, sys
folder, root = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "/tmp/rw") + "/rsciio/"
MIN = int(sys.argv[3]) if len(sys.argv) > 3 else 1
hit = {}
for n in os.listdir(folder):
    for l in open(os.path.join(folder, n)):
        a, b, k = l.strip().rsplit(":", 2)
        d = hit.setdefault(a, {})
        d[int(b)] = d.get(int(b), 0) + int(k)
def lines(code, out):
    out |= {l for _, _, l in code.co_lines() if l}
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            lines(c, out)
    return out
tot = miss_tot = 0
for d, _, fs in os.walk(root):
    for f in sorted(fs):
        p = os.path.join(d, f)
        r = p[len(root):]
        if not f.endswith(".py") or r.startswith("tests") or "__pycache__" in r:
            continue
        src = open(p).read().split("\n")
        ex = lines(compile("\n".join(src), p, "exec"), set())
        miss = sorted(n for n in ex if hit.get(r, {}).get(n, 0) < MIN)
        tot += len(ex); miss_tot += len(miss)
        print(f"== {r} {len(ex)-len(miss)}/{len(ex)}")
        if hit.get(r):
            for m in miss:
                print(f"   {m} ({hit[r].get(m, 0)}): {src[m-1].strip()[:110]}")
print(tot - miss_tot, "of", tot)
