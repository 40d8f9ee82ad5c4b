"""P01/P02: scenarios generated by TLC from MCTensor.tla, executed on real tensors, validated by TraceTensor.tla."""
import vt

def text(hist):
    return " ".join("%s %s ;" % ("".join(map(str, u)), " ".join(map(str, op))) for u, op in hist)

def run(c, which):
    exe = vt.build("tensor")["tensor"]
    ex = c.model("MCTensor", "MCTensor" + which + ("" if c.quick else "Deep"), export=True, timeout=1500)
    n = 6000 if c.quick else 40000
    if len(ex) > n:
        ex = c.rng.sample(ex, n)
    sims = c.model("MCTensor", "SimTensor" + which, export=True, timeout=1500,
                   args=["-simulate", "num=%d" % (400 if c.quick else 3000), "-depth", "80", "-seed", str(c.seed)])
    big = c.model("MCTensor", "SimTensor" + which + "Big", export=True, timeout=1500,
                  args=["-simulate", "num=%d" % ((6 if which == "Life" else 60) * (1 if c.quick else 8)), "-depth", "60", "-seed", str(c.seed)])
    seen, lines = set(), []
    for h in ex + sims:
        t = text(h)
        if t not in seen:
            seen.add(t)
            lines.append(t)
    c.extra["scenarios"] = {"one_per_explored_transition": len(ex), "random_behaviours": len(sims)}
    c.conform("tensor", exe, [], "TraceTensor", scenario="\n".join(lines) + "\n")
    c.extra["scenarios"]["with_large_tensors"] = len(big)
    c.conform("tensor-big", exe, [], "TraceTensor", scenario="\n".join(sorted({text(h) for h in big})) + "\n", shards=8)
    c.assumptions += ["element values are small integers; contents of newly allocated elements are unspecified",
                      "heap errors (double release, use after release) are made visible by AddressSanitizer as an abnormal end of the trace"]
