import vt
def run(c):
    exe = vt.build("sampler")["sampler"]
    c.model("MCSampler", "MCSampler")
    n = 2000 if c.quick else 1500
    lines = [vt.optext(h) for h in c.model("MCSampler", "SimSampler", export=True, timeout=1500,
             args=["-simulate", "num=%d" % n, "-depth", "41", "-seed", str(c.seed)])]
    c.conform("sampler", exe, [], "TraceSampler", scenario="\n".join(sorted(set(lines))) + "\n", timeout=600)
    c.assumptions += ["weights are observed through a dataset whose samples carry marks; testing mode is exercised with non-empty testing sets"]
