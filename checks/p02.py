import tensorcheck
def run(c):
    tensorcheck.run(c, "Copy")
