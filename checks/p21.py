import layercheck
def run(c):
    layercheck.run(c, "act", ["asan"], 500, 5000)
