import vt
def run(c):
    exe = vt.build("colour")["colour"]
    c.model("MCColour", "MCColour")
    sims = c.model("MCColour", "SimColour", export=True, timeout=1500,
                   args=["-simulate", "num=%d" % (140 if c.quick else 800), "-depth", "15", "-seed", str(c.seed)])
    # every 8 bit value once, in every channel
    allv = [["Classes", 1, 9, 9, 9], ["Save", 8, 16, 16, 3] + [(i // 3 * 1 + 85 * (i % 3)) % 256 for i in range(768)], ["Load", 8, 32, 8, 1] + list(range(256))]
    # large images: content without a short period
    mix = lambda n, k, a: [(e * k + e // 251 * 7 + e // 4096 * 3) % a for e in range(n)]
    big = [["Classes", 3, 9, 9, 9, 9, 9, 8, 200, 9, 9], ["Save", 8, 301, 91, 3] + mix(301 * 91 * 3, 37, 256), ["Load", 8, 67, 260, 3] + mix(67 * 260 * 3, 91, 256),
           ["Label", 261, 70, 3] + [v for e in mix(261 * 70, 5, 4) for v in [(9, 9, 9), (9, 9, 8), (200, 9, 9), (9, 8, 9)][e]], ["Paint", 2, 70, 70] + mix(70 * 70 * 6, 53, 200)]
    # black and white classes
    for cs in ([255] * 3 + [0] * 3, [0] * 3 + [255] * 3, [0] * 3 + [0, 0, 1]):
        big += [["Classes", 2] + cs, ["Label", 3, 2, 3] + [255] * 3 + [0] * 3 + [0, 0, 1] + [254] * 3 + [0] * 3 + [255] * 3, ["Label", 2, 2, 1, 0, 255, 1, 254]]
    # many classes
    for n in (17, 40, 257):
        cs = [(i * 97 % 256, i * 31 % 256, i % 256) for i in range(n)]
        big += [["Classes", n] + [v for t in cs for v in t], ["Label", 23, 12, 3] + [v for e in range(276) for v in cs[e * 5 % n]],
                ["Paint", 1, 3, 3] + mix(9 * n, 53, 200), ["Paint", 1, 2, 2] + [100 if e // 4 == n - 1 - e % 4 else e % 5 for e in range(4 * n)]]
    c.conform("colour", exe, [], "TraceColour", scenario="\n".join(sorted({vt.optext(h) for h in sims + [allv, big]})) + "\n")
    c.assumptions += ["the lossy JPEG format is only checked on uniformly coloured images, within 4/255",
                      "single-class labels are compared within 0.003, painted single-class values within 1/65280"]
