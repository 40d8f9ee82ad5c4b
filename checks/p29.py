import json

import vt


def run(c):
    c.model("MCPatches", "MCPatches" if c.quick else "MCPatchesDeep", timeout=3000)
    n = 1500 if c.quick else 4000
    lines = [vt.optext(h) for h in c.model("MCPatches", "SimPatches", export=True, timeout=1500, args=["-simulate", "num=%d" % n, "-depth", "12", "-seed", str(c.seed)])]
    exe = vt.build("patches")["patches"]
    c.conform("patches", exe, [], "TracePatches", scenario="\n".join(lines) + "\n", timeout=600)
    c.assumptions += ["labels are stored as integers in the label image", "labels are read at the pixel, or one pixel right of and below it, throughout"]
