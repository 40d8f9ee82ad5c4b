import vt
def run(c):
    c.model("MCClassify", "MCClassify" if c.quick else "MCClassifyDeep", timeout=3000)
    n = 600 if c.quick else 12000
    lines = [vt.optext(h) for h in c.model("MCClassify", "SimClassify", export=True, timeout=1500,
             args=["-simulate", "num=%d" % n, "-depth", "26", "-seed", str(c.seed)])]
    text = "\n".join(sorted(set(lines))) + "\n"
    for v in ["asan", "omp"] if c.quick else ["asan", "plain", "omp"]:
        exe = vt.build("classify", variant=v)["classify"]
        c.conform("classify-" + v, exe, [], "TraceClassify", scenario=text, timeout=600)
    c.assumptions += ["outputs and labels are multiples of 1/16, weights of 1/4; rates compared to a thousandth of a percent; tied pixels belong to the first of the highest classes"]
