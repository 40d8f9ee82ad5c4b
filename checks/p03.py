import vt
def text(hist):
    return " ".join(" ".join(map(str, op)) + " ;" for op in hist)
def run(c):
    exe = vt.build("persist")["persist"]
    ex = c.model("MCPersist", "MCPersist" + ("" if c.quick else "Deep"), export=True, timeout=1500)
    n = 3000 if c.quick else 30000
    total = len(ex)
    if total > n:
        ex = c.rng.sample(ex, n)
    sims = c.model("MCPersist", "SimPersist", export=True, timeout=1500,
                   args=["-simulate", "num=%d" % (120 if c.quick else 2000), "-depth", "90", "-seed", str(c.seed)])
    c.extra["scenarios"] = {"explored_transitions": total, "replayed": len(ex), "random_behaviours": len(sims)}
    c.conform("persist", exe, [], "TracePersist", scenario="\n".join(sorted({text(h) for h in ex + sims})) + "\n")
    big = c.model("MCPersist", "SimPersistBig", export=True, timeout=1500,
                  args=["-simulate", "num=%d" % (40 if c.quick else 800), "-depth", "120", "-seed", str(c.seed)])
    c.extra["scenarios"]["with_large_tensors"] = len(big[:70]) if c.quick else len(big)
    if c.quick:
        big = big[:70]
    c.conform("persist-big", vt.build("persist", "plain")["persist"], [], "TracePersist", scenario="\n".join(sorted({"BIG " + text(h) for h in big})) + "\n")
    c.assumptions += ["tensors read by memory mapping are read-only", "reading only a header leaves the contents unspecified"]
