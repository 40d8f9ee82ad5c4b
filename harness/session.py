#!/usr/bin/env python3
"""Executes histories of spec/Session.tla with the training program: datasets, network descriptions and scripts are written to a
scratch directory, the parameter files and logs the program leaves there are read back.
session.py SCENARIO EXE SCRATCH OUT; a scenario line is JSON: {"cfg": n, "seed": s, "hists": [[op, ...], ...]}"""
import concurrent.futures as cf, hashlib, json, os, random, shutil, struct, subprocess, sys

TIMES = ("SecondsElapsed", "PixelThroughput", "FrameRate")
METRICS = ("OverallRecognitionRate", "AverageRecognitionRate", "AverageIntersectionoverUnion", "F1", "Precision", "Recall",
           "FalsePositiveRate", "FalseNegativeRate", "Accuracy", "OptimalThreshold")
N1 = "?convolutional size=3x3 kernels=4\n?tanh\n?convolutional size=2x2 kernels=3\n?tanh\n?fullyconnected neurons=(o)\n?output\n"
N2 = "?convolutional size=1x1 kernels=5\n?sigm\n?convolutional size=1x1 kernels=4\n?relu\n?convolutional size=1x1 kernels=(o)\n?output\n"
N3 = "?convolutional size=2x2 kernels=4\n?maxpooling size=2x2\n?tanh\n?fullyconnected neurons=(o)\n?output\n"
GD = "lr=0.05\nl2=0.01\nmomentum=0.9\ngamma=0.1\nexponent=0.5\niterations=2\nsbatchsize=1\npbatchsize=%d\n"
QP = "lr=0.01\nl2=0.001\nl1=0.0001\nmu=1.5\niterations=2\nsbatchsize=2\npbatchsize=%d\noptimization=quickprop\n"
# net, settings, batch size, classes, training and testing images; nodes of the parameters in the fcn and patch graphs, number of nodes
CONFIGS = [
    (N1, GD, 1, 2, 4, 3, [2, 2, 4, 4, 6, 6], [1, 1, 3, 3, 5, 5]),
    (N1, QP, 2, 2, 4, 3, [2, 2, 4, 4, 6, 6], [1, 1, 3, 3, 5, 5]),
    (N2, GD, 1, 3, 3, 2, [1, 1, 3, 3, 5, 5], [1, 1, 3, 3, 5, 5]),
    (N2, QP, 1, 1, 2, 1, [1, 1, 3, 3, 5, 5], [1, 1, 3, 3, 5, 5]),
    (N1, GD, 2, 1, 3, 2, [2, 2, 4, 4, 6, 6], [1, 1, 3, 3, 5, 5]),
    (N2, GD.replace("iterations=2", "iterations=0"), 1, 2, 2, 2, [1, 1, 3, 3, 5, 5], [1, 1, 3, 3, 5, 5]),
    (N1, GD.replace("0.9", "0.0"), 1, 2, 3, 2, [2, 2, 4, 4, 6, 6], [1, 1, 3, 3, 5, 5]),
    (N3, QP, 1, 3, 3, 2, [2, 2, 5, 5], [1, 1, 4, 4]),
]


def digest(b):
    return int.from_bytes(hashlib.sha1(b).digest()[:4], "big") >> 1


def tensors(path):
    res = []
    with open(path, "rb") as f:
        d = f.read()
    p = 0
    while p < len(d):
        if p + 32 > len(d):
            return [-1]
        s, w, h, m = struct.unpack_from("<4Q", d, p)
        n = s * w * h * m * 4
        if n > len(d) - p - 32:
            return [-1]
        res.append(digest(d[p:p + 32 + n]))
        p += 32 + n
    return res


def stream(path, r, n, classes):
    with open(path, "wb") as f:
        for i in range(n):
            w, h = (5 - i % 2, 4) if i % 3 else (4, 5)
            f.write(struct.pack("<4Q", 1, w, h, 3) + struct.pack("<%df" % (w * h * 3), *[r.randint(-64, 64) / 64 for _ in range(w * h * 3)]))
            lab = [r.randrange(max(2, classes)) for _ in range(w * h)]
            v = [2.0 * x - 1 for x in lab] if classes == 1 else [1.0 if x == c else 0.0 for c in range(classes) for x in lab]
            f.write(struct.pack("<4Q", 1, w, h, classes) + struct.pack("<%df" % len(v), *v))


def csv(path):
    with open(path) as f:
        lines = f.read().split("\n")
    head = lines[0].split(",")
    rows = []
    for line in lines[1:]:
        if line == "":
            continue
        v = line.split(",")
        if len(v) != len(head):
            rows.append({"n": -9, "lossy": False, "tr": False, "ep": -9, "it": -9, "m": -9, "a": -9})
            continue
        cells = sorted((k, x) for k, x in zip(head[3:], v[3:]) if x != "" and k not in TIMES)
        m = [c for c in cells if c[0] in METRICS]
        a = [c for c in cells if c[0] not in METRICS]
        rows.append({"n": len(m), "lossy": float(dict(a).get("AverageAggregateLoss", 0)) > 0, "tr": v[0] == "1", "ep": int(v[1]), "it": int(v[2]), "m": digest(repr(m).encode()), "a": digest(repr(a).encode())})
    return rows


def text(op, r):
    k = op[0]
    if k == "train":
        w = []
        if op[1] != 1 or r.random() < .5:
            w.append("epochs=%d" % op[1])
        if op[2] or r.random() < .2:
            w.append("no_snapshots=%d" % op[2])
        r.shuffle(w)
        return " ".join(["train"] + w)
    if k == "test":
        return "test"
    if k == "save":
        return "save file=p/" + op[1]
    if k == "load":
        w = ["file=p/" + op[1]] + (["last_layer=%d" % op[2]] if op[2] or r.random() < .2 else [])
        r.shuffle(w)
        return " ".join(["load"] + w)
    if k == "exp":
        return "set experiment name=" + op[1]
    if k == "epoch":
        return "set epoch=%d" % op[1]
    if k == "reset":
        return "reset"
    if k == "tstat":
        return "tstat" if op[1] and r.random() < .3 else "tstat enable=%d" % op[1]
    if k == "quit":
        return r.choice(["q", "quit"])
    return ["foo", "help", "graph file=p/g", "graph file=p/gt test", "wstat node=node%d" % r.randint(0, 6), "dstat node=node%d" % r.randint(0, 6),
            "load file=p/missing", "load", "save", "save file=nodir/x", "set experiment", r.choice(["", " train", "Test", "set", "# train", "retrain", "tes"])][op[1] - 1]


def session(line, exe, scratch):
    sc = json.loads(line)
    net, opts, batch, classes, ntr, nte, fn, pn = CONFIGS[sc["cfg"] - 1]
    r = random.Random(sc["seed"])
    d = os.path.join(scratch, "s%d" % sc["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    stream(d + "/tr.Tensor", r, ntr, classes)
    stream(d + "/te.Tensor", r, nte, classes)
    with open(d + "/data", "w") as f:
        f.write("classes=%d\n%s\ncolors\n%s\n%straining=tr.Tensor\ntesting=te.Tensor\n" % (
            classes, "\n".join("abc"[:classes]), "\n".join("0x00000%d" % c for c in range(classes)),
            "weights\n%s\n" % "\n".join(["1", "0.5", "2"][:classes]) if sc["cfg"] % 2 else ""))
    for g, method in ((1, "fcn"), (2, "patch")):
        with open(d + "/net%d" % g, "w") as f:
            f.write("method=%s\n" % method + net + opts % batch)
    patches = sum((4 * 4 if i % 2 else 20) if i % 3 else 20 for i in range(ntr))      # one per pixel
    up = net.count("pooling")                            # upscaled again
    its = "iterations=2" in opts
    ev = [json.dumps({"e": "Begin", "progs": [
        {"node": fn, "nodes": fn[-1] + 4 + up, "tnodes": fn[-1] + 4 + up, "iters": 2 if its else ntr, "its": nte // batch + 1, "hybrid": False},
        {"node": pn, "nodes": pn[-1] + 4, "tnodes": fn[-1] + 4 + up, "iters": 2 if its else patches, "its": nte + 1, "hybrid": True}]})]
    env = dict(os.environ)

    def process(g, ops, observe, stdin):
        cmds, obs = [], []
        for i, op in enumerate(ops):
            cmds.append(text(op, r))
            if observe and op[0] != "quit":
                cmds.append("save file=o/%d" % i)
        if stdin and not any(o[0] == "quit" for o in ops) and r.random() < .5:
            cmds.append("quit")
        if cmds and cmds[-1] in ("q", "quit"):             # what follows is not executed
            cmds.append(r.choice(["save file=p/late", "test\nsave file=p/late", "\nsave file=p/late", "q\nsave file=p/late"]))
        body = "\n".join(cmds) + r.choice(["", "\n"])
        shutil.rmtree(d + "/o", ignore_errors=True)
        os.makedirs(d + "/o")
        for x in ("g", "gt"):
            if os.path.exists(d + "/p/" + x):
                os.unlink(d + "/p/" + x)
        args = [exe] + (["-v"] if r.random() < .3 else []) + ["data", "net%d" % g]
        try:
            if stdin:
                q = subprocess.run(args, cwd=d, input=body.encode(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60, env=env)
            else:
                with open(d + "/script", "w") as f:
                    f.write(body)
                q = subprocess.run(args + ["script"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60, env=env)
            rc = q.returncode
            if rc:
                sys.stderr.write(q.stderr.decode(errors="replace")[-1500:] + "\n")
        except subprocess.TimeoutExpired:
            rc = 999
        ev.append(json.dumps({"e": "Start", "g": g}))
        for i, op in enumerate(ops):
            e = {"e": "Op", "op": op, "obs": []}
            p = d + "/o/%d" % i
            if observe and op[0] != "quit":
                e["obs"] = tensors(p) if os.path.exists(p) else [-2]
            ev.append(json.dumps(e))
        graphs = []
        for x in ("g", "gt"):
            n = 0
            if os.path.exists(d + "/p/" + x):
                with open(d + "/p/" + x) as f:
                    t = f.read()
                n = t.count("shape=record") if t.startswith("digraph G {") and t.rstrip().endswith("}") else -1
            graphs.append(n)
        ev.append(json.dumps({"e": "Exit", "rc": rc, "graphs": graphs,
                              "disk": [[f, tensors(d + "/p/" + f)] for f in sorted(os.listdir(d + "/p")) if f not in ("g", "gt")],
                              "logs": [[f[:-4], csv(d + "/csv/" + f)] for f in sorted(os.listdir(d + "/csv"))]}))

    for h in sc["hists"]:
        shutil.rmtree(d + "/p", ignore_errors=True)
        shutil.rmtree(d + "/csv", ignore_errors=True)
        os.makedirs(d + "/p")
        os.makedirs(d + "/csv")
        ev.append(json.dumps({"e": "Clean"}))
        i = 0
        while i < len(h):
            j = i + 1
            while j < len(h) and h[j][0] != "start":
                j += 1
            process(h[i][1], h[i + 1:j], r.random() < .6, r.random() < .3)
            i = j
    shutil.rmtree(d, ignore_errors=True)
    return [x.replace('"e": ', '"e":', 1) + "\n" for x in ev]


def main():
    scn, exe, scratch, out = sys.argv[1:]
    with open(scn) as f:
        lines = [x for x in f if x.strip()]
    with open(out, "w") as o, cf.ThreadPoolExecutor(8) as ex:
        for ev in ex.map(lambda x: session(x, exe, scratch), lines):
            o.writelines(ev)


if __name__ == "__main__":
    main()
