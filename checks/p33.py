import vt
def run(c):
    c.model("MCDraw", "MCDraw" if c.quick else "MCDrawDeep", timeout=3000)
    n = 1500 if c.quick else 6000
    lines = [vt.optext(h) for h in c.model("MCDraw", "SimDraw", export=True, timeout=1500,
             args=["-simulate", "num=%d" % n, "-depth", "20", "-seed", str(c.seed)])]
    exe = vt.build("draw")["draw"]
    c.conform("draw", exe, [], "TraceDraw", scenario="\n".join(sorted(set(lines))) + "\n", timeout=600)
    c.assumptions += ["the statements are compared as a bag: their order and the white space between them are free; networks of up to 7 nodes"]
