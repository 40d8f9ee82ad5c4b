import vt
def run(c, mode="whole"):
    exe = vt.build("dataset")["dataset"]
    c.model("MCDataset", "MCDataset")
    n = 400 if c.quick else 1500
    lines = [vt.optext(h) for h in c.model("MCDataset", "SimDataset_" + mode, export=True, timeout=1500,
             args=["-simulate", "num=%d" % n, "-depth", "17", "-seed", str(c.seed)])]
    if mode == "whole":
        lines += [vt.optext(h) for h in c.model("MCDataset", "SimDataset_many", export=True, timeout=1500,
                  args=["-simulate", "num=%d" % (60 if c.quick else 400), "-depth", "41", "-seed", str(c.seed)])]
    lines = sorted(set(lines))
    c.rng.shuffle(lines)
    c.conform("dataset", exe, [], "TraceDataset", scenario="\n".join(lines[:500 if c.quick else 2500]) + "\n", timeout=600)
    c.assumptions += ["position weights are observed through an error function passed to the dataset (and the default one); position information is compared to a thousandth"]
