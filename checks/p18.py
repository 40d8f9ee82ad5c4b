import layercheck
def run(c):
    layercheck.run(c, "conv", ["asan", "atlas"], 500, 5000)
