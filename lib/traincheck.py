import vt
def run(c, quick_n, thorough_n):
    c.model("MCTrainer", "MCTrainer" if c.quick else "MCTrainerDeep", timeout=3000)
    n = quick_n if c.quick else thorough_n
    lines = [vt.optext(h) for h in c.model("MCTrainer", "SimTrainer", export=True, timeout=1500,
             args=["-simulate", "num=%d" % n, "-depth", "16", "-seed", str(c.seed)])]
    text = "\n".join(sorted(set(lines))) + "\n"
    for v in ["asan"] if c.quick else ["asan", "plain", "omp"]:
        exe = vt.build("trainer", variant=v)["trainer"]
        c.conform("trainer-" + v, exe, [], "TraceTrainer", scenario=text, timeout=600)
    c.assumptions += ["update rules compared in fixed point (1/1024, tolerance 4 units per update), gradients and losses scripted integers, up to 10 training iterations per scenario"]
