#!/usr/bin/env python3
"""coverage.py [PROPERTY...]: which lines of the repository no check ever executes (development aid).
Runs the quick checks on an instrumented build and lists the basic blocks never entered."""
import os, re, subprocess, sys, collections
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS
hit, every = set(), set()
for pid in sys.argv[1:] or [p for p in PROPS if p not in ("C12", "C21")]:
    n = [i for i, h in enumerate(PROPS[pid]["harness"]) if not h.get("asan") and h.get("tier", "quick") == "quick"]
    for i in n:
        w = "/tmp/mccov-%s-%d" % (pid, i)
        cf = w + "/cov"
        os.makedirs(w, exist_ok=True)
        env = dict(os.environ, MC_WORK=w, MC_ONLY=str(i), MC_COVFILE=cf)
        p = subprocess.run([sys.executable, V + "/check.py", pid, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(pid, i, p.stdout.strip().split("\n")[-1][:150], flush=True)
        so = "%s/plain/h%d_0.so" % (w, i)
        d = subprocess.run(["objdump", "-d", so], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        pcs = []
        for a, b in zip(d, d[1:]):
            if "call" in a and "__sanitizer_cov_trace_pc" in a:
                m = re.match(r"\s*([0-9a-f]+):", b)
                if m: pcs.append(int(m.group(1), 16))
        bits = open(cf, "rb").read()
        out = subprocess.run(["addr2line", "-e", so], input="\n".join(hex(x) for x in pcs), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        for pc, l in zip(pcs, out):
            l = l.split(" (")[0]
            if not l.startswith("/repo"): continue
            every.add(l)
            if pc < len(bits) and bits[pc]: hit.add(l)
        subprocess.run(["rm", "-rf", w])
miss = collections.defaultdict(list)
for l in every - hit:
    f, n = l.rsplit(":", 1)
    miss[f].append(int(n))
print("%d of %d block lines entered" % (len(hit), len(every)))
for f in sorted(miss):
    print(f)
    src = open(f).read().split("\n")
    for n in sorted(miss[f]):
        if n: print("  %5d  %s" % (n, src[n - 1].strip()[:110]))
