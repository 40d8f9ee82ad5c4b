import layercheck
def run(c):
    layercheck.run(c, "geo", ["asan"], 500, 5000)
