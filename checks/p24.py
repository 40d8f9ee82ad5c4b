import vt


def hexa(s):
    return "x" + "".join("%02x" % ord(ch) for ch in s)


def run(c):
    for cfg in ("", "_data"):
        c.model("MCConfig", ("MCConfig" if c.quick else "MCConfigDeep") + cfg, timeout=3000)
    n = 900 if c.quick else 8000
    lines = []
    for h in c.model("MCConfig", "SimConfig", export=True, timeout=1500, args=["-simulate", "num=%d" % n, "-depth", "15", "-seed", str(c.seed)]):
        ls = ["".join(x) for x in h]
        lines.append("S " + hexa("\n".join(ls[:c.rng.randint(0, len(ls))]) + c.rng.choice(["", "\n"])))
    for h in c.model("MCConfig", "SimConfig_data", export=True, timeout=1500, args=["-simulate", "num=%d" % n, "-depth", "12", "-seed", str(c.seed)]):
        blocks = h[2:] if c.rng.random() < .8 else h[2:c.rng.randint(4, len(h))]
        text = "\n".join(x for b in blocks for x in b)
        lines.append("D %s %d %d %d %d" % (hexa(text + c.rng.choice(["", "\n"])), h[1][0] == 0, *h[1][1:], h[0] if any(b[0].startswith("classes=") for b in blocks) else 0))
    exe = vt.build("config")["config"]
    c.conform("config", exe, [], "TraceConfig", scenario="\n".join(sorted(set(lines))) + "\n", timeout=600)
    c.assumptions += ["every key and block is given in its documented form; lists are complete; a block occurs once",
                      "the error function is recognised by the weights of loaded samples"]
