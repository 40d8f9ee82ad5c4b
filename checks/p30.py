import vt


def run(c):
    c.model("MCDecide", "MCDecide" if c.quick else "MCDecideDeep", timeout=3000)
    n = 64 if c.quick else 4000
    lines, seen = [], set()
    for h in c.model("MCDecide", "SimDecide", export=True, timeout=1500, args=["-simulate", "num=%d" % n, "-depth", "10", "-seed", str(c.seed)]):
        k = str(h[:-1])
        if k not in seen:
            seen.add(k)
            lines.append(vt.optext(h))
    exes = vt.build("decide", tools=("classifyImage",))
    c.conform("decide", exes["decide"], [exes["classifyImage"]], "TraceDecide", scenario="\n".join(lines) + "\n", timeout=840, procs=vt.NPROC)
    c.assumptions += ["receptive fields are not negative, and pooling divides eight", "scores closer to each other than single precision behind a sigmoid distinguishes may be decided either way"]
