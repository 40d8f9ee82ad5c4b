import vt


def run(c):
    c.model("MCCensus", "MCCensus" if c.quick else "MCCensusDeep", timeout=3000)
    n = 250 if c.quick else 3000
    lines = sorted({vt.optext(h) for h in c.model("MCCensus", "SimCensus", export=True, timeout=1500, args=["-simulate", "num=%d" % n, "-depth", "9", "-seed", str(c.seed)])})
    exes = vt.build("census", tools=("tensorStreamStats",))
    c.conform("census", exes["census"], [exes["tensorStreamStats"]], "TraceCensus", scenario="\n".join(lines) + "\n", timeout=840, procs=vt.NPROC)
    c.assumptions += ["every pixel has one best class", "weights are not negative; a class of weight zero is not counted in the unweighted part either", "position independent errors"]
