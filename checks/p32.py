import vt
def run(c):
    c.model("MCGradCheck", "MCGradCheck" if c.quick else "MCGradCheckDeep", timeout=3000)
    n = 600 if c.quick else 6000
    lines = [vt.optext(h) for h in c.model("MCGradCheck", "SimGradCheck", export=True, timeout=1500,
             args=["-simulate", "num=%d" % n, "-depth", "17", "-seed", str(c.seed)])]
    text = "\n".join(sorted(set(lines))) + "\n"
    for v in ["asan"] if c.quick else ["asan", "plain"]:
        exe = vt.build("gradcheck", variant=v)["gradcheck"]
        c.conform("gradcheck-" + v, exe, [], "TraceGradCheck", scenario=text, timeout=600)
    c.assumptions += ["losses are quadratic, so that central differences are exact up to rounding; no ratio lies within 0.8 per cent of a limit"]
