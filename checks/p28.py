import json

import vt

TOOLS = ("makeTensorStream", "makeCompressedTensorStream", "compressTensorStream", "tensorStreamTool", "tensorTool")


def run(c):
    c.model("MCTools", "MCTools" if c.quick else "MCToolsDeep", timeout=3000)
    n = 120 if c.quick else 900
    seen, lines = {}, []
    for h in c.model("MCTools", "SimTools", export=True, timeout=1500, args=["-simulate", "num=%d" % n, "-depth", "22", "-seed", str(c.seed)]):
        k = json.dumps(h[:-1])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 1:
            lines.append(vt.optext(h))
    exes = vt.build("tools", tools=TOOLS)
    c.conform("tools", exes["tools"], [exes[t] for t in TOOLS], "TraceTools", scenario="\n".join(lines) + "\n", timeout=840, procs=vt.NPROC)
    c.assumptions += ["stream files are complete and the images of a list exist", "lists end at their first empty line", "images with one or three channels",
                      "labels of a single class are judged for colours which differ from it equally in every channel"]
