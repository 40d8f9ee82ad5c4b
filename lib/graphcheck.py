import vt
def run(c, mode, deep_model=True):
    exe = vt.build("graph")["graph"]
    c.model("MCGraph", "MCGraph" if c.quick or not deep_model else "MCGraphDeep", timeout=3000)
    if mode == "param": c.model("MCGraph", "MCGraph_par", timeout=900)
    n = 300 if c.quick else 1500
    lines = [vt.optext(h) for h in c.model("MCGraph", "SimGraph_" + mode, export=True, timeout=1500,
             args=["-simulate", "num=%d" % n, "-depth", "35", "-seed", str(c.seed)])]
    c.conform("graph", exe, [], "TraceGraph", scenario="\n".join(sorted(set(lines))) + "\n", timeout=600)
    c.assumptions += ["nodes are probe layers with integer coefficients and the library's sum, concatenation, ReLU and square loss layers on 2x1 images with 2 samples; every float computed is an exactly representable integer",
                      "connections excluded from back-propagation are exercised on nodes none of whose inputs take part"]
