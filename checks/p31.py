import vt
def run(c):
    c.model("MCAlgebra", "MCAlgebra" if c.quick else "MCAlgebraDeep", timeout=3000)
    n = 120 if c.quick else 2500
    lines = [vt.optext(h) for h in c.model("MCAlgebra", "SimAlgebra", export=True, timeout=1500,
             args=["-simulate", "num=%d" % n, "-depth", "13", "-seed", str(c.seed)])]
    text = "\n".join(sorted(set(lines))) + "\n"
    for v in ["asan", "atlas"] if c.quick else ["asan", "atlas", "omp", "plain"]:
        exe = vt.build("algebra", variant=v)["algebra"]
        c.conform("algebra-" + v, exe, [], "TraceAlgebra", scenario=text, timeout=600)
    c.assumptions += ["small integer values, for which every float operation is exact in any order of summation"]
