"""Instrumented memory-access sites of the library inside simrun, and which of them runs reached."""
import re, subprocess, sys, json
CALL = re.compile(r"\bcall\s+\S+\s+<__tsan_(?:unaligned_|volatile_|unaligned_volatile_|read_write|read|write|atomic)")
def total(simrun):
    """{return address: function} of every instrumented access in library and generated code"""
    p = subprocess.run(["objdump", "-d", "--no-show-raw-insn", simrun], stdout=subprocess.PIPE, text=True)
    out, fn, want = {}, "", False
    for l in p.stdout.split("\n"):
        m = re.match(r"^[0-9a-f]+ <(.*)>:", l)
        if m: fn = m.group(1); want = False; continue
        if ":\t" not in l: continue
        a = int(l.split(":")[0], 16)
        if want: out[a] = fn
        want = bool(CALL.search(l))
    return out
def lines(simrun, addrs):
    addrs = list(addrs)
    p = subprocess.run(["addr2line", "-e", simrun], input="\n".join("0x%x" % (a - 1) for a in addrs), stdout=subprocess.PIPE, text=True)
    return dict(zip(addrs, [x.split(" ")[0] for x in p.stdout.split("\n")]))
def summary(simrun, reached):
    t = total(simrun); loc = lines(simrun, t); lib = {a for a in t if "/runtime/" in loc[a] or "/include/" in loc[a] or "/gen/" in loc[a]}
    per = {}
    for a in lib:
        f = re.sub(r"^.*/(runtime|include|gen)/", r"\1/", loc[a]).split(":")[0]; c = per.setdefault(f, [0, 0]); c[1] += 1; c[0] += a in reached
    return dict(reached=sum(c[0] for c in per.values()), total=sum(c[1] for c in per.values()), by_file={k: "%d/%d" % tuple(v) for k, v in sorted(per.items())}), {loc[a] for a in lib if a not in reached}
if __name__ == "__main__":
    r = set()
    for f in sys.argv[2:]: r |= set(json.load(open(f))["sites"])
    s, un = summary(sys.argv[1], r); print(json.dumps(s, indent=1))
    for u in sorted(un, key=lambda x: (x.split(":")[0], int(x.split(":")[1]) if x.split(":")[1].isdigit() else 0)): print(u)
