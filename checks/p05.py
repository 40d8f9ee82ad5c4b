import vt
def run(c):
    exe = vt.build("streams")["streams"]
    c.model("MCStreams", "MCStreams")
    lines = []
    n = 120 if c.quick else 800
    for m in ("images", "tensors"):
        lines += [vt.optext(h) for h in c.model("MCStreams", "SimStreams_" + m, export=True, timeout=1500,
                  args=["-simulate", "num=%d" % n, "-depth", "41", "-seed", str(c.seed)])]
    c.conform("streams", exe, [], "TraceStreams", scenario="\n".join(sorted(set(lines))) + "\n")
    lines = []
    n = 10 if c.quick else 100
    for m in ("bigimages", "bigtensors"):
        lines += [vt.optext(h) for h in c.model("MCStreams", "SimStreams_" + m, export=True, timeout=1500,
                  args=["-simulate", "num=%d" % n, "-depth", "17", "-seed", str(c.seed)])]
    c.conform("streams-big", exe, [], "TraceStreams", scenario="\n".join(sorted(set(lines))) + "\n")
    c.assumptions += ["list streams are compared on 8 bit PNG images; colours outside the class list map to no class"]
