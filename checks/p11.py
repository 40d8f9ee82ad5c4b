import graphcheck
def run(c):
    graphcheck.run(c, "pass")
