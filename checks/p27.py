import json
import os

import vt

NCFG = 8


def variant(h, rng):
    """The same history with commands removed and added which change neither parameters, epoch nor the selection of samples."""
    res = []
    for op in h:
        if op[0] in ("test", "noop", "exp", "tstat") and rng.random() < .6:
            continue
        res.append(op)
        if op[0] != "quit" and rng.random() < .35:
            res.append(rng.choice([["test"], ["test"], ["noop", rng.randint(1, 12)], ["tstat", 0], ["tstat", 1], ["exp", "x"], ["train", 0, 0]]))
    return res


def washed(rng):
    """Histories which reach the same state with different memories of the optimizer, all of them forgotten again."""
    n, m, es = rng.randint(1, 2), rng.randint(1, 2), [0, rng.choice([1, 5])]
    res = []
    for g in (2, 1):
        res += [["start", g], ["save", "a"], ["train", 1, 0], ["save", "b"]]
        for first in ([], [["load", "b", 0]]):
            for e in es:
                res += [["start", g]] + first + [["train", n, 0], ["load", "a", 0], ["epoch", e], ["train", m, 0]]
            res += [["start", g]] + first + [["train", n, 0], ["reset"], ["train", m, 0]]
            res += [["start", g], ["train", 1, 0]] + first + [["train", n, 0], ["epoch", 1 + n], ["reset"], ["test"], ["train", m, 1]]
    return res


def run(c):
    c.model("MCSession", "MCSession" if c.quick else "MCSessionDeep", timeout=3000)
    n = 80 if c.quick else 900
    seen, hists = set(), []
    for h in c.model("MCSession", "SimSession", export=True, timeout=1500, args=["-simulate", "num=%d" % n, "-depth", "18", "-seed", str(c.seed)]):
        k = json.dumps(h[:-1])
        if k not in seen:
            seen.add(k)
            hists.append(h)
    per = 10 if c.quick else 12
    lines = []
    for i in range(0, len(hists), per):
        hs = [x for h in hists[i:i + per] for x in (h, variant(h, c.rng))] + [washed(c.rng)]
        lines.append(json.dumps({"id": i, "cfg": (i // per) % NCFG + 1, "seed": c.seed, "hists": hs}))
    exe = vt.build([], tools=("trainNetwork",))["trainNetwork"]
    scratch = os.path.join(c.dir, "scratch")
    os.makedirs(scratch)
    c.conform("session", os.path.join(vt.VERIF, "harness", "session.py"), [exe, scratch], "TraceSession", scenario="\n".join(lines) + "\n", timeout=840)
    c.assumptions += ["commands in the documented form, with known parameters", "the directory csv/ exists", "eight pairs of network and dataset, each as a patchwise and as a fully convolutional program"]
