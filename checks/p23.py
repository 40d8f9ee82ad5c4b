import vt


def run(c):
    c.model("MCFactory", "MCFactory" if c.quick else "MCFactoryDeep", timeout=3000)
    n = 1200 if c.quick else 5000
    lines = []
    for d in c.model("MCFactory", "SimFactory", export=True, timeout=1500, args=["-simulate", "num=%d" % n, "-depth", "16", "-seed", str(c.seed)]):
        head = "%d %d %d %d %d %d ;" % (d["c"], d["loss"], d["w"], d["h"], d["m"], c.rng.randrange(1, 10 ** 6))
        lines.append(head + " " + vt.optext(d["lines"]))
    exe = vt.build("factory")["factory"]
    c.conform("factory", exe, [], "TraceFactory", scenario="\n".join(sorted(set(lines))) + "\n", timeout=900)
    c.assumptions += ["both forms of a network are compared for descriptions without padding, branches and normalization within channels, with zero padded patches",
                      "manual receptive fields, stacks deeper than 64 and malformed lines are not part of the same-size guarantee"]
