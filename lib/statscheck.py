import vt
def run(c):
    c.model("MCStats", "MCStats" if c.quick else "MCStatsDeep", timeout=3000)
    n = 1500 if c.quick else 12000
    lines = [vt.optext(h) for h in c.model("MCStats", "SimStats", export=True, timeout=1500,
             args=["-simulate", "num=%d" % n, "-depth", "26", "-seed", str(c.seed)])]
    text = "\n".join(sorted(set(lines))) + "\n"
    for v in ["asan"] if c.quick else ["asan", "plain"]:
        exe = vt.build("stats", variant=v)["stats"]
        c.conform("stats-" + v, exe, [], "TraceStats", scenario=text, timeout=600)
    c.assumptions += ["values are multiples of 1/8 below 10^8; recorded time is bounded from both sides, not compared exactly; at most one CSV sink"]
