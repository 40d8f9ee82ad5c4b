import vt
def run(c):
    exe = vt.build("codec")["codec"]
    c.model("MCCodec", "MCCodec" + ("" if c.quick else "Deep"), timeout=1500)
    n = 50 if c.quick else 1200
    sims = c.model("MCCodec", "SimCodec", export=True, timeout=1500, args=["-simulate", "num=%d" % n, "-depth", "26", "-seed", str(c.seed)])
    c.conform("codec", exe, [], "TraceCodec", scenario="\n".join(sorted({vt.optext(h) for h in sims})) + "\n")
    big = c.model("MCCodec", "SimCodecBig", export=True, timeout=1500, args=["-simulate", "num=%d" % (12 if c.quick else 300), "-depth", "14", "-seed", str(c.seed)])
    c.conform("codec-big", exe, [], "TraceCodec", scenario="\n".join(sorted({vt.optext(h) for h in big})) + "\n")
    c.assumptions += ["runs of -0.0 and 0.0 may be merged (numerically identical)"]
