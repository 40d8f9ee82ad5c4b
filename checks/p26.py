import vt
def run(c):
    exe = vt.build("netshape")["netshape"]
    c.model("MCNetShape", "MCNetShape" if c.quick else "MCNetShapeDeep", timeout=3000)
    n = 3000 if c.quick else 6000
    lines = [vt.optext(h) for h in c.model("MCNetShape", "SimNetShape", export=True, timeout=1500,
             args=["-simulate", "num=%d" % n, "-depth", "25", "-seed", str(c.seed)])]
    c.conform("netshape", exe, [], "TraceNetShape", scenario="\n".join(sorted(set(lines))) + "\n", timeout=600)
    c.assumptions += ["networks of up to 5 nodes with up to 3 connections each; nodes are added once"]
