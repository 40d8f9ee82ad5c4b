import vt


def run(c):
    c.model("MCRepro", "MCRepro" if c.quick else "MCReproDeep", timeout=3000)
    n = 160 if c.quick else 600
    hs = c.model("MCRepro", "SimRepro", export=True, timeout=1500, args=["-simulate", "num=%d" % n, "-depth", "23", "-seed", str(c.seed)])
    scen = "\n".join(sorted({vt.optext(h) for h in hs})) + "\n"
    plain = vt.build("repro", variant="plain")["repro"]      # the allocator's fill pattern changes from step to step
    c.conform("repro", plain, [], "TraceRepro", scenario=scen, timeout=600)
    if not c.quick:
        c.conform("reproasan", vt.build("repro")["repro"], [], "TraceRepro", scenario="\n".join(scen.split("\n")[:60]) + "\n", timeout=1800)
    c.assumptions += ["single-threaded build (the default); descriptions from a list of nine chains",
                      "after training, only equality is required of equal histories"]
