import json
import vt


def hexa(s):
    return "x" + "".join("%02x" % ord(ch) for ch in s)


def seed_ignored(s, i):
    """The recorded finding: the weights drawn do not depend on the seed= of the descriptor at all."""
    if not any("seed=" in k and "ignored" in k for k in vt.known_findings("P22")) or i >= len(s):
        return False
    ev = json.loads(s[i])
    if ev["e"] != "Init":
        return False
    hs = {json.loads(x)["h"] for x in s[1:] if x.startswith('{"e":"Init"')}
    return len(hs) == 1


def run(c):
    texts = c.model("MCDescriptor", "MCDescriptor" if c.quick else "MCDescriptorDeep", export=True, timeout=3000)
    lines = []
    strs = ["".join(map(chr, t)) for t in texts]
    # with the letters spelt out: seed=, and layer types
    spelt = sorted({"".join("seed" if x == 97 else "relu" if x == 98 else chr(x) for x in t) for t in texts} - set(strs))
    strs += c.rng.sample(spelt, 1200) if c.quick else spelt
    for k in range(0, len(strs), 20):
        lines.append(" ".join("D %s %d ;" % (hexa(s), c.rng.choice([c.rng.randrange(2 ** 31), c.rng.randrange(2 ** 32), 0, 2 ** 31, 2 ** 32 - 1])) for s in strs[k:k + 20]))
    plain = vt.build("descriptor", variant="plain")["descriptor"]   # regular expressions are slow with address checking
    c.conform("strings", plain, [], "TraceDescriptor", scenario="\n".join(lines) + "\n", timeout=900)
    lines = []
    n = 200 if c.quick else 6000
    for h in c.model("MCDescriptor", "SimDescriptor", export=True, timeout=1500, args=["-simulate", "num=%d" % n, "-depth", "21", "-seed", str(c.seed)]):
        lines.append(" ".join("D %s %d ;" % (hexa("".join(op[1])), op[2]) if op[0] == "D" else vt.optext([op]) for op in h))
    lines += [" ".join("D %s %d ;" % (hexa(t), k + 1) for k, t in enumerate(["convolution(size=103x7 kernels=2)", "convolution(kernels=12 size=7x120 stride=10x11 pad=100x12)", "maxpooling(size=3x120)", "maxpooling(size=1000x1)",
              "amaxpooling(size=100x3 stride=120x1)", "convolution(size=2x2 kernels=130 group=10)", "resize(border=100x105)", "gradientaccumulation(outputs=100)"]))]
    exe = vt.build("descriptor")["descriptor"]
    c.conform("descriptor", exe, [], "TraceDescriptor", scenario="\n".join(sorted(set(lines))) + "\n", timeout=600)
    init = []
    for k in range(4 if c.quick else 40):
        base = "convolution(size=%dx%d kernels=%d%%s)" % (c.rng.randint(1, 3), c.rng.randint(1, 3), c.rng.choice([2, 4, 8]))
        seeds = c.rng.sample(range(1, 100000), 2)
        init.append(" ".join("I %s ;" % hexa(base % (" seed=%d" % s)) for s in [seeds[0], seeds[0], seeds[1], seeds[0]]))
    c.conform("seeds", exe, [], "TraceDescriptor", scenario="\n".join(init) + "\n", known=seed_ignored, shards=len(init))
    c.assumptions += ["layers are compared with explicitly constructed ones in testing mode (dropout is not implemented in training mode)",
                      "values of documented parameters are well formed; keys ending in a documented key are not generated"]
