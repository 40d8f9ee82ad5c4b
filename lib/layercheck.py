import vt
def run(c, group, variants, quick_n, thorough_n, more=[]):
    c.model("MCLayers", ("MCLayers_" if c.quick else "MCLayersDeep_") + group, timeout=3000)
    n = quick_n if c.quick else thorough_n
    lines = [vt.optext(h) for h in c.model("MCLayers", "SimLayers_" + group, export=True, timeout=1500,
             args=["-simulate", "num=%d" % n, "-depth", "8", "-seed", str(c.seed)])]
    text = "\n".join(sorted(set(lines))) + "\n"
    # large tensors: the same definitions at sampled elements
    big = [vt.optext(h) for h in c.model("MCLayers", "SimLayersLarge_" + group, export=True, timeout=1500,
           args=["-simulate", "num=%d" % ((20 if group == "conv" else 60) if c.quick else 600), "-depth", "3", "-seed", str(c.seed + 5)])] + more
    big = "\n".join(sorted(set(big))) + "\n"
    for v in variants if c.quick else ["asan", "atlas", "omp", "plain"]:
        exe = vt.build("layers", variant=v)["layers"]
        c.conform("layers-" + v, exe, [], "TraceLayers", scenario=text, timeout=900)
        if v in ("asan", "omp", "atlas"):
            c.conform("layers-large-" + v, exe, [], "TraceLayers", scenario=big, timeout=900)
    c.assumptions += ["small integer values for which every float operation is exact (fractions of logarithms for the exponential layers), shapes up to about 7x7 with 3 samples in full; shapes with one dimension of several hundred or more at sampled elements"]
